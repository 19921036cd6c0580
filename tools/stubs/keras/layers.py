class LSTM:
    def __init__(self, neurons, input_shape=None):
        self.neurons, self.input_shape = neurons, input_shape


class Dense:
    def __init__(self, units):
        self.units = units
