"""The documented special functions: name, arguments in order -> outputs (several outputs become several functions sp_name_output)."""

TABLE = '''
airy z -> Ai Aip Bi Bip
airye z -> eAi eAip eBi eBip
itairy x -> Apt Bpt Ant Bnt
ellipj u m -> sn cn dn ph
ellipk m -> -
ellipkm1 p -> -
ellipkinc phi m -> -
ellipe m -> -
ellipeinc phi m -> -
elliprc x y -> -
elliprd x y z -> -
elliprf x y z -> -
elliprg x y z -> -
elliprj x y z p -> -
jv v z -> -
jve v z -> -
yn n x -> -
yv v z -> -
yve v z -> -
kn n x -> - int
kv v z -> -
kve v z -> -
iv v z -> -
ive v z -> -
hankel1 v z -> -
hankel1e v z -> -
hankel2 v z -> -
hankel2e v z -> -
wright_bessel a b x -> -
itj0y0 x -> ij0 iy0
it2j0y0 x -> ij0 iy0
iti0k0 x -> ii0 ik0
it2i0k0 x -> ii0 ik0
besselpoly a lmb nu -> -
jvp v z -> -
yvp v z -> -
ivp v z -> -
h1vp v z -> -
h2vp v z -> -
bdtrc k n p -> - int
bdtri k n y -> - int
bdtrik y n p -> -
bdtrin k y p -> -
btdtria p b x -> -
btdtrib a p x -> -
fdtr dfn dfd x -> -
fdtrc dfn dfd x -> -
fdtri dfn dfd p -> -
fdtridfd dfn p x -> -
gdtr a b x -> -
gdtrc a b x -> -
gdtria p b x -> -
gdtrib a p x -> -
gdtrix a b p -> -
nbdtr k n p -> -
nbdtrc k n p -> -
nbdtri k n y -> - int
nbdtrik y n p -> -
nbdtrin k y p -> -
ncfdtr dfn dfd nc f -> -
ncfdtridfd dfn p nc f -> -
ncfdtridfn p dfd nc f -> -
ncfdtri dfn dfd nc p -> -
ncfdtrinc dfn dfd p f -> -
nctdtr df nc t -> -
nctdtridf p nc t -> -
nctdtrit df nc p -> -
nctdtrinc df p t -> -
nrdtrimn p std x -> -
nrdtrisd mn p x -> -
ndtr x -> -
log_ndtr x -> -
ndtri y -> -
ndtri_exp y -> -
pdtr k m -> -
pdtrc k m -> -
pdtri k y -> -
pdtrik p m -> -
stdtr df t -> -
stdtridf p t -> -
stdtrit df p -> -
chdtr v x -> -
chdtrc v x -> -
chdtri v p -> -
chdtriv p x -> -
chndtr x df nc -> -
chndtridf x p nc -> -
chndtrinc x df p -> -
chndtrix p df nc -> -
smirnov n d -> -
smirnovi n p -> -
kolmogorov y -> -
kolmogi p -> -
boxcox x lmbda -> -
boxcox1p x lmbda -> -
inv_boxcox y lmbda -> -
inv_boxcox1p y lmbda -> -
logit x -> -
expit x -> -
log_expit x -> -
tklmbda x lmbda -> -
owens_t h a -> -
entr x -> -
rel_entr x y -> -
kl_div x y -> -
huber delta r -> -
pseudo_huber delta r -> -
gamma z -> -
gammaln x -> -
loggamma z -> -
gammasgn x -> -
gammainc a x -> -
gammaincinv a y -> -
gammaincc a x -> -
gammainccinv a y -> -
beta a b -> -
betaln a b -> -
betainc a b x -> -
betaincc a b x -> -
betaincinv a b y -> -
betainccinv a b y -> -
psi z -> -
rgamma z -> -
polygamma n x -> -
digamma z -> -
poch z m -> -
lpmv m v x -> -
sph_harm m n theta phi -> -
hyp2f1 a b c z -> -
hyp1f1 a b x -> -
hyperu a b x -> -
hyp0f1 v z -> -
pbdv v x -> d dp
pbvv v x -> v vp
pbwa a x -> w wp
mathieu_a m q -> -
mathieu_b m q -> -
kelvin x -> Be Ke Bep Kep
ber x -> -
bei x -> -
berp x -> -
beip x -> -
ker x -> -
kei x -> -
kerp x -> -
keip x -> -
lambertw z -> -
wrightomega z -> -
agm a b -> -
expn n x -> -
exp1 z -> -
expi x -> -
shichi x -> si ci
sici x -> si ci
zeta x -> -
zetac x -> -
'''


def functions():
    """(calculator name, library name, arguments, output index or None, whether the arguments are integers)"""
    out = []
    for line in TABLE.strip().split('\n'):
        left, right = line.split(' -> ')
        name, *params = left.split()
        outs = right.split()
        ints = outs[-1] == 'int'
        if ints:
            outs = outs[:-1]
        if outs == ['-']:
            out.append(('sp_' + name.lower(), name, params, None, ints))
        else:
            for i, o in enumerate(outs):
                out.append(('sp_{}_{}'.format(name, o).lower(), name, params, i, ints))
    return out
