0x00,
