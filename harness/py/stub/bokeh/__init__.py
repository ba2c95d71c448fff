"""Stand-in for bokeh (not installed here) that records what is drawn."""
