import jax


def sigmoid(x):
    return jax.nn.sigmoid(x)


def relu(x):
    return jax.nn.relu(x)


def swish(x):
    return jax.nn.sigmoid(x) * x
