"""C34: the same types without quadruple precision."""
import gen_traits


def write(path, seed, count, ident):
    gen_traits.QUAD[0] = False
    try:
        gen_traits.write(path, seed, count, ident)
    finally:
        gen_traits.QUAD[0] = True
