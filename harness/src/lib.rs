#[macro_use]
pub mod sx;
#[cfg(any(feature = "c14", feature = "c15", feature = "c16", feature = "c17"))] pub mod osc;
#[cfg(any(feature = "c29", feature = "c30", feature = "c31", feature = "c32", feature = "c33", feature = "c39", feature = "c40", feature = "c41", feature = "c42", feature = "c44", feature = "c45"))] pub mod probe;
#[cfg(feature = "c01")] pub mod c01;
#[cfg(feature = "c02")] pub mod c02;
#[cfg(feature = "c03")] pub mod c03;
#[cfg(feature = "c04")] pub mod c04;
#[cfg(feature = "c05")] pub mod c05;
#[cfg(feature = "c06")] pub mod c06;
#[cfg(feature = "c07")] pub mod c07;
#[cfg(feature = "c08")] pub mod c08;
#[cfg(feature = "c09")] pub mod c09;
#[cfg(feature = "c10")] pub mod c10;
#[cfg(feature = "c11")] pub mod c11;
#[cfg(feature = "c12")] pub mod c12;
#[cfg(feature = "c13")] pub mod c13;
#[cfg(feature = "c14")] pub mod c14;
#[cfg(feature = "c15")] pub mod c15;
#[cfg(feature = "c16")] pub mod c16;
#[cfg(feature = "c17")] pub mod c17;
#[cfg(feature = "c18")] pub mod c18;
#[cfg(feature = "c19")] pub mod c19;
#[cfg(feature = "c20")] pub mod c20;
#[cfg(feature = "c21")] pub mod c21;
#[cfg(feature = "c22")] pub mod c22;
#[cfg(feature = "c23")] pub mod c23;
#[cfg(feature = "c24")] pub mod c24;
#[cfg(feature = "c25")] pub mod c25;
#[cfg(feature = "c26")] pub mod c26;
#[cfg(feature = "c27")] pub mod c27;
#[cfg(feature = "c28")] pub mod c28;
#[cfg(feature = "c29")] pub mod c29;
#[cfg(feature = "c30")] pub mod c30;
#[cfg(feature = "c31")] pub mod c31;
#[cfg(feature = "c32")] pub mod c32;
#[cfg(feature = "c33")] pub mod c33;
#[cfg(feature = "c34")] pub mod c34;
#[cfg(feature = "c35")] pub mod c35;
#[cfg(feature = "c36")] pub mod c36;
#[cfg(feature = "c42")] pub mod c42;
#[cfg(feature = "c45")] pub mod c45;
#[cfg(feature = "c44")] pub mod c44;
#[cfg(feature = "c43")] pub mod c43;
#[cfg(feature = "c41")] pub mod c41;
#[cfg(feature = "c40")] pub mod c40;
#[cfg(feature = "c39")] pub mod c39;
