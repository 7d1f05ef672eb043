SEED = dict(
 property='P01',
 needs='a chrono duration between minus one second and zero, exclusive',
 breaks='the borrow that makes the nanoseconds non-negative is not done when the seconds are zero, so the encoding holds a negative nanosecond count and cannot be decoded',
 edits=[('src/implementations/chrono.rs', '\t\tif nano < 0 {\n', '\t\tif secs < 0 && nano < 0 {\n')],
 features=['chrono'],
 deps='chrono = "0.4"',
 demo=r'''
use chrono::Duration;
fn main() {
    for n in [-1_500_000_000i64, -1_000_000_001, -1_000_000_000, -999_999_999, -500_000_000, -1, 0, 1, 999_999_999, 1_500_000_000] {
        let d = Duration::nanoseconds(n);
        let b = revision::to_vec(&d).unwrap();
        let back: Duration = revision::from_slice(&b).unwrap();
        assert_eq!(back, d);
    }
}
''')
