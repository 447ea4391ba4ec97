X(api1) X(apiw1) X(badapi1)
