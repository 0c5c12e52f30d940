NOTE["default"] = "The specification's own properties are checked exhaustively within the bounds listed in the evidence; the code is bound to it by replaying every bounded behaviour and a seeded random sample of larger ones and validating each recorded trace. Trusts TLC, the Python driver (records, never judges) and the reading of the HID 1.11 specification written down in spec/."
