SPECIFICATION Spec
CONSTANTS None = None
 Walkers = {1, 2}
 Sites = {1, 2, 3}
 Unknown = {4}
 Resolutions = {0, 1, 2, 3, 5}
 Depth = 1000000
VIEW View
INVARIANTS SitesNeedResolution ResolutionPositive WalkersOnKnownSites WalkersNeedSites
PROPERTIES SeedBeforeSites SitesStay
CHECK_DEADLOCK FALSE
