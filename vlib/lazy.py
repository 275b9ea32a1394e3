"""Late imports, so that the list of checks can be read without JAX."""


class _Lazy:
    def __getattr__(self, name):
        import importlib

        targets = {"jax": "jax", "jnp": "jax.numpy", "jc": "jax_cosmo", "lax": "jax.lax"}
        mod = importlib.import_module(targets.get(name) or name)
        setattr(self, name, mod)
        return mod


J = _Lazy()


def memo(fn):
    """Build a (jitted) function once per distinct static arguments."""
    cache = {}

    def wrapper(*args):
        if args not in cache:
            cache[args] = fn(*args)
        return cache[args]

    return wrapper
