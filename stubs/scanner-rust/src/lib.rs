//! unused by the verified code
