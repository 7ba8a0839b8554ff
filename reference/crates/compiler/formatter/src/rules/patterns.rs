// Pattern formatting rules will be added here as needed
