NOTE = ('Static: the sources are interpreted abstractly on every run; sizes, entries and group data are symbolic, '
        'an alarm needs two normal forms separated by a valuation or a definite exception. Trusts the models of '
        'numpy/jax/framework functions. Obligations the domain cannot decide are listed in the evidence, not claimed.')
NA = {
    'P29': 'Depends on the rounding of LAPACK, expm, QR and thousands of descent steps on runtime data; no sound static bound on it is in reach. '
           'P01-P10, P20 and P24 decide the same facts over exact arithmetic.',
    'P30': 'Rates of convergence depend on the spectrum of constraints and data that exist only at run time; no static argument bounds them. '
           'P24 and P27 decide what is done when they do or do not converge.',
}
