import numpy as np


class LaplaceMechanism:
    def __init__(self, f=lambda x: x, delta_f=1.0, epsilon=1.0, random_state=None):
        self._f, self._scale = f, delta_f / epsilon
        self._rs = random_state or np.random.RandomState()

    def __call__(self, x):
        y = self._f(x)
        return y + self._rs.laplace(scale=self._scale, size=np.shape(y))


class GeometricMechanism:
    def __init__(self, f=lambda x: x, delta_f=1.0, epsilon=1.0, random_state=None):
        self._f = f
        self._p = 1 - np.exp(-epsilon / delta_f)
        self._rs = random_state or np.random.RandomState()

    def __call__(self, x):
        y = np.asarray(self._f(x))
        n = self._rs.geometric(self._p, size=y.shape) - self._rs.geometric(
            self._p, size=y.shape
        )
        return y + n
