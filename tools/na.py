# properties not claimed, with the reason
