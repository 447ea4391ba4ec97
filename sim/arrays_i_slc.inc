X(slc1) X(slcf) X(slc2) X(slcrow)
