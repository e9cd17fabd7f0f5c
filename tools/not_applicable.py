"""Properties that are listed but not claimed, with the reason."""
NOT_APPLICABLE = {
}
