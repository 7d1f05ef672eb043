include!(concat!(env!("MC_DECLS"), "/d7.rs"));
