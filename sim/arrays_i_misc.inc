X(alloc_misc) X(matprod) X(read1) X(read2) X(bad1) X(bad2) X(badctor) X(badslice) X(badexpr)
