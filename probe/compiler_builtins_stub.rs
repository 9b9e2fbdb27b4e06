#![feature(no_core, compiler_builtins)]
#![allow(internal_features)]
#![compiler_builtins]
#![no_core]
