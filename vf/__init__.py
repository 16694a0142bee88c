"""static value-flow engine for the carbon-simulator checks"""
