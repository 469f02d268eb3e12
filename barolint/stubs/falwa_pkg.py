# Stub of the optional package falwa.
