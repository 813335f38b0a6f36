//! Assumed contract of `primal::is_prime`.
pub fn is_prime(n: u64) -> bool {
    n > 1 && (2..n).take_while(|d| d * d <= n).all(|d| n % d != 0)
}
