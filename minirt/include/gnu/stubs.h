/* no stubs */
