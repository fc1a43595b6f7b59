pub mod meaning {
    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/vara_meaning.rs"));
}
pub mod lines {
    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/vara_lines.rs"));
}
pub mod commands {
    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/vara_commands.rs"));
}
pub mod session {
    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/vara_session.rs"));
}
pub mod manager {
    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/vara_manager.rs"));
}
pub mod logged {
    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/vara_log.rs"));
}
