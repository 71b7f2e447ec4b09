"""P06: scripted executions of one quantum (see sqe_lib)."""
from hlib import *
from sqe_lib import check, gen

if __name__ == "__main__":
    main(lambda rng, tier: gen(rng, tier, "existing"), check, "P06")
