X(red2) X(tiny2) X(pair2)
