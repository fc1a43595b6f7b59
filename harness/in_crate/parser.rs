use crate::verif::sx;
