INIT InitSite
NEXT NextSite
INVARIANT SiteLaws
CHECK_DEADLOCK FALSE
