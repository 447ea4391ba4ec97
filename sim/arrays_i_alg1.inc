X(red1) X(tiny1) X(pair1) X(sel1) X(badalg)
