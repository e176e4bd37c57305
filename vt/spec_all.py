from . import spec_unsigned, spec_arith, spec_conv, spec_nt, spec_signed, spec_unsafe, spec_gmp, spec_str, spec_out, spec_bin, spec_put
