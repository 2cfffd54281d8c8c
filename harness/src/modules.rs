#[cfg(feature = "c01")] mod c01;
#[cfg(feature = "c02")] mod c02;
#[cfg(feature = "c03")] mod c03;
#[cfg(feature = "c04")] mod c04;
#[cfg(feature = "c05")] mod c05;
#[cfg(feature = "c06")] mod c06;
#[cfg(feature = "c08")] mod c08;
#[cfg(feature = "c09")] mod c09;
#[cfg(feature = "c10")] mod c10;
#[cfg(feature = "c12")] mod c12;
#[cfg(feature = "c13")] mod c13;
#[cfg(feature = "c14")] mod c14;
#[cfg(feature = "c15")] mod c15;
#[cfg(feature = "c16")] mod c16;
#[cfg(feature = "c17")] mod c17;
#[cfg(feature = "c18")] mod c18;
fn dispatch(prop: &str, seed: u64, rep: &mut util::Rep) -> bool {
    match prop {
        #[cfg(feature = "c01")] "C01" => c01::run(seed, rep),
        #[cfg(feature = "c02")] "C02" => c02::run(seed, rep),
        #[cfg(feature = "c03")] "C03" => c03::run(seed, rep),
        #[cfg(feature = "c04")] "C04" => c04::run(seed, rep),
        #[cfg(feature = "c05")] "C05" => c05::run(seed, rep),
        #[cfg(feature = "c06")] "C06" => c06::run(seed, rep),
        #[cfg(feature = "c08")] "C08" => c08::run(seed, rep),
        #[cfg(feature = "c09")] "C09" => c09::run(seed, rep),
        #[cfg(feature = "c10")] "C10" => c10::run(seed, rep),
        #[cfg(feature = "c12")] "C12" => c12::run(seed, rep),
        #[cfg(feature = "c13")] "C13" => c13::run(seed, rep),
        #[cfg(feature = "c14")] "C14" => c14::run(seed, rep),
        #[cfg(feature = "c15")] "C15" => c15::run(seed, rep),
        #[cfg(feature = "c16")] "C16" => c16::run(seed, rep),
        #[cfg(feature = "c17")] "C17" => c17::run(seed, rep),
        #[cfg(feature = "c18")] "C18" => c18::run(seed, rep),
        _ => return false,
    }
    true
}
