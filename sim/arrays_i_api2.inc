X(api2) X(apiw2) X(badapi2)
