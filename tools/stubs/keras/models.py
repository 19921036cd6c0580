import json, os
import numpy
from .layers import LSTM, Dense

LOG = []


def weight(row, column, output):
    return (row + 2 * column + output) % 3 - 1


class Sequential:
    def __init__(self):
        self.trainings, self.layers, self.loss, self.outputs = 0, [], '', 0

    def add(self, layer):
        self.layers.append(layer)

    def compile(self, loss=None, optimizer=None):
        self.loss = loss

    def fit(self, X, y, epochs=1, verbose=0):
        X, y = numpy.array(X, dtype=float), numpy.array(y, dtype=float)
        self.outputs = y.shape[1]
        self.trainings += 1
        shape = ([list(l.input_shape) for l in self.layers if hasattr(l, 'input_shape')] or [list(X.shape[1:])])[0]
        units = ([l.units for l in self.layers if hasattr(l, 'units')] or [self.outputs])[0]
        neurons = ([l.neurons for l in self.layers if hasattr(l, 'neurons')] or [0])[0]
        LOG.append(dict(op='fit', trainings=self.trainings, X=X.tolist(), y=y.tolist(), epochs=epochs, loss=self.loss, neurons=neurons, fits=shape == list(X.shape[1:]) and units == self.outputs))
        if not LOG[-1]['fits']:
            raise ValueError('Input 0 of layer "lstm" is incompatible with the layer')

    def predict(self, X, verbose=0):
        X = numpy.array(X, dtype=float).tolist()
        LOG.append(dict(op='predict', X=X))
        return numpy.array([[sum(weight(r, c, o) * v for r, row in enumerate(m) for c, v in enumerate(row)) + o for o in range(self.outputs)] for m in X])

    def save(self, path):
        os.makedirs(path)
        with open(os.path.join(path, 'network.json'), 'w') as f:
            json.dump(dict(trainings=self.trainings, outputs=self.outputs, loss=self.loss, layers=[vars(l) for l in self.layers]), f)


def load_model(path):
    with open(os.path.join(path, 'network.json')) as f:
        d = json.load(f)
    net = Sequential()
    net.trainings, net.outputs, net.loss = d['trainings'], d['outputs'], d['loss']
    net.layers = [LSTM(**l) if 'neurons' in l else Dense(**l) for l in d['layers']]
    return net
