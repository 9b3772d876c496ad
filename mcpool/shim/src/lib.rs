//! The real solana_program, with an `entrypoint!` that makes the handler callable as `run`.
pub use solana_program::*;

#[macro_export]
macro_rules! entrypoint {
    ($f:ident) => {
        pub fn run(
            program_id: &$crate::pubkey::Pubkey,
            accounts: &[$crate::account_info::AccountInfo],
            data: &[u8],
        ) -> $crate::entrypoint::ProgramResult {
            $f(program_id, accounts, data)
        }
    };
}
