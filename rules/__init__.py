from .registry import REGISTRY
