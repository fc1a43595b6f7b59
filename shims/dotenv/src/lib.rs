//! Stand-in for dotenv: there is no such file.
pub fn dotenv() -> Result<(), ()> {
    Err(())
}
