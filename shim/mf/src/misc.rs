//! modules that exist only so that the facades resolve
