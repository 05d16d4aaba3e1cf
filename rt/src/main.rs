#![allow(unused, unused_unsafe, dead_code, non_local_definitions, improper_ctypes)]
mod engine;
#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09a;
#[cfg(feature = "c09")]
mod c09b;
#[cfg(feature = "c09")]
mod c09c;
#[cfg(feature = "c09")]
mod c09d;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11a;
#[cfg(feature = "c11")]
mod c11b;
#[cfg(feature = "c12")]
mod c12;

fn main() {
    #[allow(unused_mut)]
    let mut v: Vec<engine::System> = vec![];
    #[cfg(any(feature = "c01", feature = "c03", feature = "c04", feature = "c05"))]
    v.extend(engine::cc::systems());
    #[cfg(feature = "c06")]
    v.extend(c06::systems());
    #[cfg(feature = "c07")]
    v.extend(c07::systems());
    #[cfg(feature = "c08")]
    v.extend(c08::systems());
    #[cfg(feature = "c09")]
    v.extend(c09a::systems().into_iter().chain(c09b::systems()).chain(c09c::systems()).chain(c09d::systems()));
    #[cfg(feature = "c10")]
    v.extend(c10::systems());
    #[cfg(feature = "c11")]
    {
        let a: Vec<String> = std::env::args().collect();
        if a.get(1).is_some_and(|x| x == "wild") {
            c11a::wild(a[2].parse().unwrap());
            std::process::exit(43);
        }
        v.extend(c11a::systems().into_iter().chain(c11b::systems()));
    }
    #[cfg(feature = "c02")]
    if true {
        return c02::main();
    }
    #[cfg(feature = "c12")]
    if true {
        return c12::main();
    }
    engine::main(v);
}
