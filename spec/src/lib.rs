//! Property statements over the public interface of zkevm_opcode_defs. Analysed, never run.
#![allow(unused_imports, dead_code)]
pub mod oracle;
pub mod rt;
#[cfg(p = "C01")]
mod c01;
#[cfg(p = "C02")]
mod c02;
#[cfg(p = "C03")]
mod c03;
#[cfg(p = "C04")]
mod c04;
#[cfg(p = "C05")]
mod c05;
#[cfg(p = "C06")]
mod c06;
#[cfg(p = "C07")]
mod c07;
#[cfg(p = "C08")]
mod c08;
#[cfg(p = "C09")]
mod c09;
#[cfg(p = "C10")]
mod c10;
#[cfg(p = "C11")]
mod c11;
#[cfg(p = "C12")]
mod c12;
#[cfg(p = "C13")]
mod c13;
#[cfg(p = "C14")]
mod c14;
#[cfg(p = "C15")]
mod c15;
#[cfg(p = "C16")]
mod c16;
#[cfg(p = "C17")]
mod c17;
#[cfg(p = "C18")]
mod c18;
#[cfg(p = "C19")]
mod c19;
#[cfg(p = "C20")]
mod c20;
#[cfg(p = "C21")]
mod c21;
#[cfg(p = "C22")]
mod c22;
#[cfg(p = "C23")]
mod c23;
#[cfg(p = "C24")]
mod c24;
#[cfg(p = "C25")]
mod c25;
#[cfg(p = "C26")]
mod c26;
#[cfg(p = "C27")]
mod c27;
#[cfg(p = "C28")]
mod c28;
#[cfg(p = "C29")]
mod c29;
#[cfg(p = "C30")]
mod c30;
#[cfg(p = "C31")]
mod c31;
#[cfg(p = "C33")]
mod c33;
#[cfg(p = "C34")]
mod c34;
#[cfg(p = "C35")]
mod c35;
#[cfg(p = "C36")]
mod c36;
#[cfg(p = "C37")]
mod c37;
#[cfg(p = "C38")]
mod c38;
#[cfg(p = "C39")]
mod c39;
#[cfg(p = "C40")]
mod c40;
#[cfg(p = "C41")]
mod c41;
#[cfg(p = "C42")]
mod c42;
#[cfg(p = "C43")]
mod c43;
#[cfg(p = "C44")]
mod c44;
#[cfg(p = "C45")]
mod c45;
