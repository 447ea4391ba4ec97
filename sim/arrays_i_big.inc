X(badsize) X(badpos)
