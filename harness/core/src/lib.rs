//! Class-file generators and an independent reference reader, sharing no code with cafebabe.
pub mod asm;
pub mod big;
pub mod bulky;
pub mod code;
pub mod dict;
pub mod enumr;
pub mod gen;
pub mod grammar;
pub mod hostile;
pub mod mini;
pub mod mutate;
pub mod mutf8;
pub mod node;
pub mod points;
pub mod refcode;
pub mod refp;
pub mod tables;
pub mod tape;
pub mod texts;
pub mod twins;
