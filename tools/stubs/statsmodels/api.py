import numpy
from pmdarima import learnt


class Results:
    def __init__(self, data, order):
        self.data, self.order = data, order

    def forecast(self, steps=1):
        yhat = numpy.array([learnt(self.data) + 7 * (k + 1) + 2000 * (self.order[0] + 2 * self.order[1] + 4 * self.order[2]) for k in range(steps)])
        return yhat, numpy.zeros(steps), numpy.zeros((steps, 2))


class tsa:
    class ARIMA:
        def __init__(self, endog, order):
            self.data, self.order = endog, order

        def fit(self, **kwargs):
            return Results(self.data, self.order)
