include!(concat!(env!("MC_DECLS"), "/d3.rs"));
