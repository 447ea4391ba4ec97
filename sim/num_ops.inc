X(load) X(bin) X(comp) X(incdec) X(un) X(cmp) X(logic) X(conv) X(math) X(power) X(ipower) X(comb) X(between) X(pairs) X(powpair) X(badnum) X(consts) X(small)
X(fill) X(ewun) X(ewbin) X(ewscal) X(ewcomp) X(ewmath) X(ewcast)
X(ill) X(accsum) X(accprod) X(accdot) X(accnorm) X(accpoly) X(accerr)
