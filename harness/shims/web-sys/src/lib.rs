#![allow(unused)] pub mod console {}
