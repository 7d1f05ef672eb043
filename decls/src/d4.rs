include!(concat!(env!("MC_DECLS"), "/d4.rs"));
