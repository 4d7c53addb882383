// syntax/file.rs (parsing of whole files) is not under verification.
