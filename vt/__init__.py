import os

# as hvd does; jax reads it when first imported, which the checks may do before hvd
os.environ["JAX_ENABLE_X64"] = "True"
