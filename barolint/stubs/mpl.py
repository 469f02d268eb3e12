# Interface of matplotlib.
