mod common;
mod m01;
mod m02;
mod m03;
mod m04;

fn main() {
    simcore::cli! { "M01" => m01::M01, "M02" => m02::M02, "M03" => m03::M03, "M04" => m04::M04 }
}
