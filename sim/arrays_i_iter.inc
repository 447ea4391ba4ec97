X(walk1) X(walk2) X(walkx) X(keepit) X(stdalg) X(plane) X(baditer)
