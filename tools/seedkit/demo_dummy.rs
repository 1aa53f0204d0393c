#[test] fn t(){ }
