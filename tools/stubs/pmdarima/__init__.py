"""A stand-in for pmdarima: what it answers says exactly what it was fitted on."""
import numpy


def learnt(data):
    return sum((i + 1) * (float(v) + 50) for i, v in enumerate(data)) % 1009


class Model:
    def __init__(self, data, order):
        self.learnt, self.order = learnt(data), order

    def summary(self):
        return ''

    def predict(self, n_periods=10, **kwargs):
        return numpy.array([self.learnt + 7 * (k + 1) + 2000 * self.order for k in range(n_periods)])


def auto_arima(y, max_p=5, **kwargs):
    return Model(y, max_p)
