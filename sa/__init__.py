"""Static analysis of pydantic-xml by abstract interpretation of its source."""
