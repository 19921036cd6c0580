"""A stand-in for Keras: networks that record what they are trained on and asked, and answer a fixed linear function of it."""
