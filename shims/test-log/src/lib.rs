//! Empty stand-in: plusendi's library does not use this crate (only its binary or its tests do).
