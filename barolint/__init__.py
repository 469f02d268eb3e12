"""barolint: value-graph dataflow analysis for chpolste/barotropic."""
