import json
D='mpsci/distributions/'
def P(id,title,st,over,qtext,why,files,mech,observe=None,state=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
ALL=[D+'*.py','mpsci/fun/*.py','mpsci/stats/*.py']
L=[
P('C01','Calls leave the caller\'s precision and arguments untouched',
 'Every public function of mpsci leaves the global mpmath working precision exactly as it found it, whether it returns or raises, and never modifies the sequences, matrices or other mutable arguments it is given.',
 ['inputs','histories'],'every public function, every argument, normal and exceptional exit, any precision at entry',
 'Tests call functions under one or two precisions and almost never look at mp.dps or at the arguments after the call; error paths are never followed by a precision check.',
 ALL,[('with mp.extradps / @mp.extradps blocks and with mp.workdps blocks','every computing function'),('copying of inputs before in-place work','mpsci/stats/*, mpsci/fun/_logsumexp.py')],['mpmath.mp.dps after the call','arguments after the call']),
P('C02','Outside the support: density 0, log-density -inf, cdf 0/1, sf 1/0',
 'For every univariate distribution (vonmises, which lives on the circle, excepted) and all valid parameters, at any finite point outside the support pdf/pmf is 0 and logpdf/logpmf is -inf; cdf is 0 below the support and 1 above it, sf is 1 below and 0 above, at minus and plus infinity too, and the log versions are -inf or 0 accordingly; inside the support they are nonnegative. The interval or range returned by support() for those parameters is exactly the documented support, shifted and scaled by location and scale.',
 ['inputs'],'all valid parameters, all x outside the support, x = +-inf for cdf, sf, logcdf, logsf',
 'The tests sample at most one or two out-of-support points for a few distributions and never with non-default location/scale at exactly the boundary.',
 [D+'*.py'],[('early-return guards on x in pdf/logpdf/cdf/sf','each distribution module'),('support functions','each distribution module')],['return values of pdf, logpdf, cdf, sf, support']),
P('C03','Survival function is the exact complement of the cdf',
 'For every univariate distribution, all valid parameters and every x, cdf(x) + sf(x) = 1, logcdf and logsf (where provided) are the logarithms of cdf and sf, and interval_prob(x1, x2) (where provided) equals cdf(x2) - cdf(x1).',
 ['inputs'],'all valid parameters, all x in the extended reals or integers',
 'Tests compare a few isolated reference values of cdf and sf in different parameter points; complementarity over branches (method selection, tails, location/scale) is not sampled.',
 [D+'*.py'],[('cdf/sf pairs, with separate tail formulas','each distribution module')],['cdf, sf, logcdf, logsf, interval_prob']),
P('C04','Density functions equal the documented density',
 'For every distribution, all valid parameters and every x in the support, exp(logpdf(x)) (or logpmf) equals pdf(x) (or pmf), and both equal the documented probability density or mass function of that distribution, including its location and scale parameters and its boundary values.',
 ['inputs'],'all valid parameters (including boundary parameter values and special shapes), all x in the support',
 'Tests compare single reference values, usually with location 0 and scale 1; each formula has branches for special parameters that tests visit at most once.',
 [D+'*.py'],[('pdf/logpdf/pmf/logpmf bodies','each distribution module')],['pdf, logpdf, pmf, logpmf']),
P('C05','cdf is the integral (or sum) of the density',
 'For every univariate distribution and all valid parameters, cdf is continuous with derivative pdf inside the support (for discrete distributions cdf(k) - cdf(k-1) = pmf(k)), it starts at 0 at the lower end of the support and ends at 1 at the upper end, and so it is nondecreasing with values in [0, 1].',
 ['inputs'],'all valid parameters and all x in the support',
 'Tests compare values at isolated points; they never relate pdf to cdf except by a few numerical quadratures at one parameter setting.',
 [D+'*.py'],[('cdf and pdf bodies','each distribution module')],['cdf, pdf, pmf']),
P('C06','Quantile functions invert cdf and sf',
 'For every distribution that provides them, all valid parameters and all p in (0, 1): cdf(invcdf(p)) = p and sf(invsf(p)) = p (for discrete ones, the smallest k with cdf(k) >= p, or sf(k) <= p), the result lies in the support, and at p = 0 and p = 1 the ends of the support are returned.',
 ['inputs'],'all valid parameters, all p in [0, 1]',
 'Round trips are tested at a handful of p with default location/scale; the endpoint values and shifted/scaled brackets are untested for most distributions.',
 [D+'*.py',D+'_common.py'],[('closed-form inverses','each distribution module'),('bracketing + root solve',D+'_common.py and its users')],['invcdf, invsf']),
P('C07','Invalid parameters and probabilities are rejected',
 'When a parameter of a univariate distribution that validates its parameters (all but ncf, nct, ncx2 and vonmises, which document no check) violates its documented constraint (a scale or shape that must be positive is zero or negative, a probability is outside [0, 1], integer parameters are out of range), every function of that distribution raises ValueError instead of returning a number; likewise a quantile function for p outside [0, 1]. Valid parameters, including those on allowed boundaries, are accepted.',
 ['inputs'],'every public distribution function times every parameter times every invalid value',
 'A test that one bad value raises for pdf says nothing about the other eight functions of the module, nor about bad values combined with early-return points x.',
 [D+'*.py',D+'_common.py'],[('_validate_* helpers','each distribution module'),('_validate_p, _validate_x_bounds, _validate_counts',D+'_common.py')],['exceptions raised by public functions']),
P('C08','Moments agree with the distribution',
 'For all valid parameters for which the moment exists (and the variance is positive, for skewness and kurtosis) mean, var, skewness, kurtosis and noncentral_moment return the moments of the documented distribution (kurtosis is excess kurtosis), with inf or nan where the module documents an infinite or undefined moment; in particular var = m2 - m1**2 for the noncentral moments m1, m2, and var >= 0.',
 ['inputs'],'all valid parameters, all moment orders',
 'Reference values at one or two parameter settings cannot distinguish formulas that agree there; moment relations between functions are not tested.',
 [D+'*.py'],[('mean, var, skewness, kurtosis, noncentral_moment','each distribution module')],['return values']),
P('C09','Mode, median and entropy agree with the distribution',
 'For all valid parameters mode is a point of the support where the density is maximal, median halves the probability, and entropy equals minus the expected log-density of the documented distribution.',
 ['inputs'],'all valid parameters',
 'Tests use one reference value per function; special cases (shape exactly 1, mode at a boundary, integer ties) are visited rarely or never.',
 [D+'*.py'],[('mode, median, entropy','each distribution module')],['return values']),
P('C10','nll is minus the sum of log-densities; derivatives agree',
 'For every data set and all valid parameters nll(x, ...) equals minus the sum of logpdf (or counts-weighted logpmf) over the data, and nll_grad, nll_hess and nll_invhess are its gradient, Hessian and inverse Hessian with respect to the parameters; summation order and repetition via counts do not matter.',
 ['inputs'],'all data sequences of any length, all valid parameters, all counts',
 'Tests use one data set per distribution with one parameter point.',
 [D+'*.py',D+'_common.py'],[('nll bodies with collected sufficient statistics','gamma, gompertz, weibull, normal, ...'),('_get_counts/_validate_counts',D+'_common.py')],['nll, nll_grad, nll_hess, nll_invhess']),
P('C11','Parameter estimates solve their estimating equations',
 'Where mle returns real parameters inside the parameter space, the likelihood equations of the documented distribution hold at them (or, for boundary cases such as uniform, they are the exact maximiser); mle returns every parameter the caller fixed unchanged, and treats counts as repetition; mom returns parameters whose distribution has the sample mean and variance.',
 ['inputs'],'all data sequences in the support, all subsets of fixed parameters, all counts',
 'Tests fit one or two small data sets per function; combinations of fixed parameters are mostly untested.',
 [D+'*.py','mpsci/stats/_boxcox_mle.py','mpsci/stats/_yeojohnson_mle.py'],[('mle, mom','each distribution module')],['return tuples of mle, mom']),
P('C12','Location-scale equivariance and distribution identities',
 'Location and scale parameters act by the standard transformation: with z = (x - loc)/scale, pdf(x) = pdf(z)/scale, cdf(x) = cdf(z), invcdf(p) = loc + scale*invcdf0(p), mean and mode shift and scale, var scales quadratically and entropy gains log(scale). Distributions that are special cases or transformations of one another (chi2/gamma, invchi2/invgamma, weibull_min/weibull_max, gumbel_min/gumbel_max, lognormal/normal, exponweib/weibull_min, maxwell/chi, genextreme/gumbel and similar) give equal results at corresponding arguments.',
 ['inputs'],'all parameters, locations and scales; all x and p',
 'Tests mostly use loc=0, scale=1 and compare different modules in only a couple of points.',
 [D+'*.py'],[('loc/scale handling','each distribution module')],['all distribution functions']),
P('C13','Arguments are used exactly and independently of their type',
 'Results depend only on the numerical value of the arguments: the int, the float (where the number is one) and the mpf of the same number give the same result to working precision, and parameters or data are never rounded through double precision or fixed constants on the way to the result.',
 ['inputs','configurations'],'every public function, all argument types, any working precision',
 'Tests pass one type per function and compare to double or fixed-digit references, so a division of Python ints or a float constant inside the formula stays below the tolerance.',
 ALL,[('mp.mpf(...) conversion of every argument before arithmetic','each function')],['return values at high precision']),
P('C14','Transforms and their inverses are mutual inverses',
 'inv_boxcox, inv_boxcox1p, inv_yeojohnson, inv_powm1 and inv_pow1pm1 invert boxcox, boxcox1p, yeojohnson, powm1 and pow1pm1 for every value and every transform parameter on their domains (including the logarithmic special cases), the transforms equal their documented formulas, and digammainv and betaincinv invert digamma and the regularized incomplete beta function wherever they return a value (betaincinv may raise when the root finder fails).',
 ['inputs'],'all x in the domain, all lambda, including special lambda values and negative x',
 'Tests check a few (x, lambda) pairs.',
 ['mpsci/stats/_boxcox.py','mpsci/stats/_yeojohnson.py','mpsci/fun/_powm1.py','mpsci/fun/_digammainv.py','mpsci/fun/_inv_reg_inc_beta.py'],[('branches on lambda and sign of x','these files')],['return values']),
P('C15','Special functions equal their definitions',
 'The functions of mpsci.fun (debye, hermite_e, marcumq and cmarcumq, xlogy, xlog1py, logbeta, multivariate_logbeta, logbinomial, logsumexp, roots_legendre, pow1pm1, spherical Bessel functions, wright_bessel, faddeevaw) equal their mathematical definitions on their whole domain, including their special values, recurrences and complementary pairs.',
 ['inputs'],'all arguments in the documented domain, all orders/degrees/lengths',
 'Tests compare reference values at a few points.',
 ['mpsci/fun/*.py'],[('function bodies','mpsci/fun/*.py')],['return values']),
P('C16','Descriptive statistics equal their definitions',
 'For every data sequence of valid length, mean, gmean, hmean, pmean and lehmer_mean (plain and weighted), var, std, variation and unique_counts equal their definitions for every ddof, power and weights, boxcox_llf and yeojohnson_llf equal the documented log-likelihoods (boxcox_mle and yeojohnson_mle return a stationary point of them), and all scale and shift accordingly.',
 ['inputs'],'all sequences of any length, all ddof, all weights',
 'Tests use one or two fixed sequences.',
 ['mpsci/stats/_basic.py','mpsci/stats/_boxcox.py','mpsci/stats/_boxcox_mle.py','mpsci/stats/_yeojohnson_mle.py'],[('function bodies','mpsci/stats/_basic.py')],['return values']),
P('C17','Hypothesis tests return the defined statistic and p-value',
 'fisher_exact, odds_ratio (with its confidence interval), anova_oneway, the chi-square and power-divergence/G goodness-of-fit tests, pearsonr and pearsonr_ci return the documented statistic, and a p-value equal to the documented tail probability of the reference distribution at that statistic for each alternative; p-values lie in [0, 1], and are symmetric under the symmetries of the design (row/column swaps, sample order, alternative reversal). The cases in which the statistic itself is undefined are excepted (pearsonr of fewer than 3 points, the sample odds ratio of a table with a zero cell).',
 ['inputs'],'all tables, samples and alternatives',
 'Tests use a few tables and data sets; degenerate margins, alternatives and symmetric ties are rarely visited.',
 ['mpsci/stats/_fisher_exact.py','mpsci/stats/_odds_ratio.py','mpsci/stats/_anova.py','mpsci/stats/_goftests.py','mpsci/stats/_pearsonr.py'],[('function bodies','these files')],['return tuples']),
P('C18','Multivariate distributions agree with their definitions',
 'For dirichlet, multivariate_t and multivariate_hypergeometric, for every dimension and all valid parameters, log-density and density agree and equal the documented formula, mean, cov and entropy are those of the distribution, support enumerates each point exactly once, and the one- and two-dimensional cases agree with the corresponding univariate distributions.',
 ['inputs'],'all dimensions, all parameter vectors and points',
 'Tests use one or two parameter vectors of fixed dimension.',
 [D+'dirichlet.py',D+'multivariate_t.py',D+'multivariate_hypergeometric.py'],[('function bodies','these files')],['return values']),
P('C19','Root-finding helpers return a bracket or root of the function given',
 'The internal bracketing and bisection helpers return, for every monotone function and target value, an interval whose end values enclose the target and that stays inside the search domain, or a point where the function was found equal to it; quantile functions built on them therefore never return a point of a different root.',
 ['inputs','programs'],'every monotone function, every starting domain, every number of iterations',
 'Tests only see the helpers through a few quantile values for which the first bracket happens to work.',
 [D+'_common.py','mpsci/fun/_digammainv.py'],[('while loops expanding/contracting the bracket (_find_bracket), bisection (_mp_bisect / mp_bisect), _generic_inv',D+'_common.py')],['invcdf/invsf results']),
P('C20','Results do not depend on call history',
 'The result of a call depends only on its arguments and the working precision at the time of the call: calling any other functions before, repeating a call, changing precision between calls or modifying a list returned by an earlier call never changes it.',
 ['histories'],'all sequences of calls at any precisions',
 'Tests call each function in isolation; caches and module-level values computed at another precision are not exercised.',
 ALL,[('lru_cache keyed by precision',D+'fishers_noncentral_hypergeometric.py'),('no module-level mpf constants','all modules')],['return values across histories']),
P('C21','Full accuracy at every working precision',
 'The result of every function is correct to (almost) the full working precision, free of cancellation and premature rounding.',
 ['inputs','configurations'],'all inputs and all precisions','Reference values exist for a few points only.',
 ALL,[('extra working digits','mp.extradps blocks')],['return values']),
P('C22','Iterative computations terminate and converge',
 'Every quantile, estimate and quadrature terminates with a converged value for all valid arguments.',
 ['inputs'],'all valid arguments','Only sampled arguments are known to converge.',
 ALL,[('mp.findroot, mp.quad, mp.nsum calls','users of these')],['return values']),
P('C23','Invalid data, counts and weights are rejected',
 'Functions that take data (negative log-likelihoods, maximum likelihood fits and their counts) raise ValueError when a value lies outside the documented support, when a value or count that has to be an integer is not one, when a count is negative or when counts and data differ in length - wherever in the sequence the bad value is and whatever the other values are - instead of returning a number for data that cannot occur.',
 ['inputs'],'all data sequences of any length with at least one invalid element at any position; all parameters',
 'Tests reject one hand-written list each, with the bad value in one position; a check that looks at the wrong bound or only at some elements passes.',
 [D+'_common.py',D+'*.py'],[('_validate_x_bounds, _validate_counts, _validate_x_integers and similar checks','_common.py and each nll/mle')],['ValueError']),
]
with open('/verif/properties.jsonl','w') as f:
    for p in L: f.write(json.dumps(p)+'\n')
