CONSTANT LB = 16
