//! Empty: not in the offline cache and not used by the features built here.
