from flax import linen
