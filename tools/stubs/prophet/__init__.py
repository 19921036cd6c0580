"""A stand-in for Prophet: what it answers says exactly what it was fitted on and what it is asked."""
import pandas


def minutes(ds):
    return int((ds - pandas.Timestamp('2019-01-01')).total_seconds() // 60)


def naive(df):
    return [pandas.Timestamp(x) for x in df['ds']]


class Prophet:
    def __init__(self, **kwargs):
        self.learnt = None

    def fit(self, df, **kwargs):
        if self.learnt is not None:
            raise Exception('Prophet object can only be fit once. Instantiate a new object.')
        if any(x.tzinfo is not None for x in naive(df)):
            raise ValueError("Column ds has timezone specified, which is not supported. Remove timezone.")
        self.learnt = sum((minutes(t) % 997 + 1) * (y + 50) for t, y in zip(naive(df), df['y']))
        return self

    def predict(self, df=None, **kwargs):
        if self.learnt is None:
            raise Exception('Model has not been fit.')
        return pandas.DataFrame([[t, float(self.learnt % 1009 + 3 * (minutes(t) % 9973))] for t in naive(df)], columns=['ds', 'yhat'])
