from .base import make_dataset
